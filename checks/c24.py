"""C24: interactive center selection (explicit-state exploration of user action sequences on live widgets)."""
import builtins
import contextlib
import io
import itertools
import warnings

import ipywidgets as W
import matplotlib

matplotlib.use("Agg")
import matplotlib.pyplot as plt  # noqa: E402
import numpy as np  # noqa: E402
import viqa  # noqa: E402

from .c22 import Shown, judge, panels, slices_of  # noqa: E402
from .common import cnr_ref, image, make, snr_ref  # noqa: E402

RULE = ("Stateless exploration of the real widgets: all sequences of user actions (move each kind of slider, change radius, change region type, calculate region, save, save in an older selection, "
        "open again) over two metric objects (both centers at both ends of every slider for every radius, after every radius change) up to depth 3 (thorough 4) for CNR+SNR and 2 (thorough 3) for the other pairings and volumes; after every action the widgets are read back and compared "
        "with an independent model of the stored parameters; at the end score and visualisation without arguments are compared with the model. States: (shown values, stored parameters) of all "
        "selections; transitions: user actions; traces: complete action sequences.")


class Anything:
    """stands in for figures and axes while actions are explored (drawing is judged with real figures separately)"""

    def __getattr__(self, n):
        return lambda *a, **k: Anything()

    def __iter__(self):
        return iter(())


def fake_subplots(nrows=1, ncols=1, *a, **k):
    g = np.empty((nrows, ncols), dtype=object)
    for i in np.ndindex(g.shape):
        g[i] = Anything()
    return Anything(), (g[0, 0] if g.size == 1 else g[0] if nrows == 1 else g)


@contextlib.contextmanager
def notebook(fake=True):
    had = hasattr(builtins, "__IPYTHON__")
    builtins.__IPYTHON__ = True
    old = plt.subplots, plt.show, plt.savefig
    if fake:
        plt.subplots, plt.show, plt.savefig = fake_subplots, (lambda *a, **k: None), (lambda *a, **k: None)
    try:
        with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
            warnings.simplefilter("ignore")
            yield
    finally:
        plt.subplots, plt.show, plt.savefig = old
        if not had:
            del builtins.__IPYTHON__


class Selection:
    """widgets of one call of set_centers, found by their labels"""

    def __init__(self, ctx, metric, img, **kw):
        made = []
        W.Widget.on_widget_constructed(made.append)
        try:
            metric.set_centers(img, **kw)
        finally:
            W.Widget.on_widget_constructed(None)
        self.w = {}
        for x in made:
            kids = getattr(x, "children", ())
            if len(kids) == 2 and isinstance(kids[0], W.Label) and isinstance(kids[1], W.IntSlider):
                self.w[kids[0].value.split()[0].lower() + "_" + kids[0].value.split("(")[1].rstrip(")").lower()] = kids[1]
            elif isinstance(x, W.IntSlider) and x.description:
                self.w[x.description] = x
            elif isinstance(x, W.Dropdown):
                self.w["type"] = x
            elif isinstance(x, W.Button):
                self.w[x.description] = x
        ctx.check("Radius" in self.w and "Save Current Values" in self.w and "x_signal" in self.w, "controls", list(self.w))
        self.calc = None

    def point(self, what, d):
        return tuple(self.w["%s_%s" % (a, what)].value for a in "xyz"[:d])

    def value(self, n):
        return self.w[n].value


KEYS = {"CNR": ("signal_center", "background_center", "radius"),
        "SNR": ("signal_center", "radius", "region_type", "iterations", "lower_threshold", "upper_threshold", "auto_center")}


class User:
    """one metric object with its selections and the model of its stored parameters"""

    def __init__(self, ctx, name, img, start, ctor):
        self.ctx, self.name, self.img, self.d = ctx, name, img, img.ndim
        self.metric = make(name, 255, **(start if ctor else {}))
        self.sel = []
        self.stored = dict(start) if ctor else {}
        self.open(**({} if ctor else start))

    def open(self, **start):
        s = Selection(self.ctx, self.metric, self.img, **start)
        p = self.stored
        mid = tuple(n // 2 for n in self.img.shape)
        get = (lambda k, dflt: p.get(k) if p.get(k) is not None else start[k] if k in start else dflt)
        if self.name == "SNR":
            get = (lambda k, dflt: start[k] if k in start else p.get(k) if p.get(k) is not None else dflt)
        want = dict(signal_center=get("signal_center", mid), radius=get("radius", 1))
        if self.name == "CNR":
            want["background_center"] = get("background_center", mid)
        else:
            want["region_type"] = get("region_type", "cubic")
            want.update(iterations=get("iterations", 2), lower_threshold=get("lower_threshold", 90), upper_threshold=get("upper_threshold", 99))
            s.calc = (want["iterations"], want["lower_threshold"], want["upper_threshold"])
        self.sel.append(s)
        shown = self.shown(s)
        for k, v in want.items():
            self.ctx.check(shown[k] == v, self.name, "selection starts with", k, shown[k], "expected", v)
        self.save_model(s)

    def shown(self, s):
        out = dict(signal_center=s.point("signal", self.d), radius=s.value("Radius"))
        if self.name == "CNR":
            out["background_center"] = s.point("background", self.d)
        else:
            out["region_type"] = s.value("type")
            out.update(iterations=s.value("Iterations"), lower_threshold=s.value("Lower Threshold"), upper_threshold=s.value("Upper Threshold"))
        return out

    def save_model(self, s):
        v = self.shown(s)
        if self.name == "CNR":
            self.stored = v
        elif v["region_type"] == "full":
            it, lo, up = s.calc
            self.stored = dict(signal_center=None, radius=None, region_type="full", iterations=it, lower_threshold=lo, upper_threshold=up, auto_center=True)
        else:
            o = v["region_type"] == "original"
            self.stored = dict(signal_center=None if o else v["signal_center"], radius=None if o else v["radius"], region_type=v["region_type"], iterations=None,
                               lower_threshold=None, upper_threshold=None, auto_center=False)

    def act(self, a):
        s = self.sel[-1]
        if a == "sx":
            w = s.w["x_signal"]
            w.value = w.max if w.value != w.max else w.min
        elif a == "last":
            w = s.w["%s_%s" % ("xyz"[self.d - 1], "background" if self.name == "CNR" else "signal")]
            w.value = w.min if w.value != w.min else w.max
        elif a == "r":
            w = s.w["Radius"]
            w.value = w.value + 1 if w.value < w.max else 1
        elif a == "rmax":
            s.w["Radius"].value = s.w["Radius"].max
        elif a == "type":
            w = s.w["type"]
            o = list(w.options)
            w.value = o[(o.index(w.value) + 1) % len(o)]
        elif a == "thr":
            s.w["Lower Threshold"].value = 70 if s.value("Lower Threshold") != 70 else 60
            s.w["Iterations"].value = 1 if s.value("Iterations") != 1 else 3
            s.w["Upper Threshold"].value = 97 if s.value("Upper Threshold") != 97 else 98
        elif a == "calc":
            s.w["Calculate Full Region"].click()
            s.calc = (s.value("Iterations"), s.value("Lower Threshold"), s.value("Upper Threshold"))
            self.ctx.check(s.value("type") == "full", "region type after calculation", s.value("type"))
        elif a == "save":
            s.w["Save Current Values"].click()
            self.save_model(s)
        elif a == "old":
            self.sel[0].w["Save Current Values"].click()
            self.save_model(self.sel[0])
        elif a == "open":
            self.open()
        self.ctx.op()

    def judge(self, what):
        p = self.metric.parameters
        for k in KEYS[self.name]:
            if k in self.stored:
                self.ctx.check(p.get(k) == self.stored[k], self.name, "parameter", k, "is", p.get(k), "expected", self.stored[k], "after", what)
        for s in self.sel:
            v = self.shown(s)
            for n in ("signal_center", "background_center"):
                if n in v:
                    self.ctx.check(all(v["radius"] <= c <= m - v["radius"] for c, m in zip(v[n], self.img.shape)), self.name, "selection offers", n, v[n], "radius", v["radius"], "after", what)
        self.ctx.state(self.name, self.d, str(sorted(self.stored.items())), str([sorted(self.shown(s).items()) for s in self.sel]))

    def use(self, what):
        """score without arguments"""
        v = self.stored
        if v["signal_center"] is None:
            return
        got = self.metric.score(self.img)
        want = cnr_ref(self.img, v["signal_center"], v["background_center"], v["radius"]) if self.name == "CNR" else snr_ref(self.img, v["signal_center"], v["radius"])
        self.ctx.close(float(got), want, "%s after %s" % (self.name, what), rtol=1e-5, atol=1e-7)

    def look(self, what):
        """visualisation without arguments, with real figures"""
        v = self.stored
        with Shown() as s:
            self.metric.visualize_centers(self.img, dpi=20)
        p = panels(s.figs[0])
        rt = "cubic" if self.name == "CNR" else v["region_type"]
        c = v["signal_center"] or tuple(n // 2 for n in self.img.shape)
        todo = ([v["background_center"]] if self.name == "CNR" else []) + [c]
        n = 1 if self.d == 2 else 3
        self.ctx.check(len(p) == n * len(todo), "panels", len(p))
        if rt == "full":
            if len(p[0].images) == 2 and self.d == 2:
                o = p[0].images[1].get_array().compressed().astype(float)
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    got = make("SNR", 255).score(self.img, **{k: v[k] for k in KEYS["SNR"]})
                self.ctx.close(float(got), o.mean() / o.std(), "score of the displayed region after %s" % what, rtol=1e-5)
            return
        for i, cc in enumerate(todo):
            if self.d == 2:
                judge(self.ctx, p[i], self.img, self.name + " view after " + what, None, (cc, v["radius"], rt))
            else:
                for j, (want, pos) in enumerate(slices_of(self.img, cc)):
                    judge(self.ctx, p[3 * i + j], want, self.name + " view after " + what, pos, (pos, v["radius"], rt))


ACTS = {"CNR": ["sx", "last", "r", "rmax", "save", "old", "open"], "SNR": ["sx", "last", "r", "type", "thr", "calc", "save", "old", "open"]}
SETUPS = [("CNR", "SNR", 2), ("CNR", "CNR", 2), ("SNR", "SNR", 2), ("CNR", "SNR", 3)]


def acts(setup):
    a, b, d = SETUPS[setup]
    return [(0, x) for x in ACTS[a]] + [(1, x) for x in ACTS[b]]


def build(ctx, setup, ctor):
    a, b, d = SETUPS[setup]
    users = []
    for i, n in enumerate((a, b)):
        sh = [(16, 18, 17), (19, 16, 18)][i][:d]
        img = image(sh, "u1", i + 1, rng=100)
        img[tuple(slice(3, s - 3) for s in sh)] += 120
        start = dict(signal_center=tuple((5 + i, 6, 7)[:d]), radius=2 + i)
        if n == "CNR":
            start["background_center"] = tuple((7, 5 + i, 6)[:d])
        else:
            start["region_type"] = "spherical" if i else "cubic"
        users.append(User(ctx, n, img, start if ctor != 2 else {}, ctor == 1))
    return users


def keys(tier):
    for s, (a, b, d) in enumerate(SETUPS):
        depth = (3 if s == 0 else 2) + (tier == "thorough") - (s == 3 and tier == "quick") * 0
        for ctor in ((0, 1, 2) if s == 0 or tier == "thorough" else (s % 3,)):
            n = depth if ctor == 0 else 2
            if s == 0 and ctor == 0:
                for pre in itertools.product(range(len(acts(s))), repeat=2):
                    yield ["seq", s, ctor, list(pre), n - 2]
            else:
                for x in range(len(acts(s))):
                    yield ["seq", s, ctor, [x], n - 1]
    for s in range(4):
        for x in range(len(acts(s))):
            yield ["look", s, x]
    for i in range(4):
        yield ["restart", i]
    for d in (2, 3):
        for x in range(len(ACTS["SNR"])):
            yield ["moved", d, x]
    for i in range(4):
        for sh in ((40, 66, 41), (33, 34, 40), (52, 37, 44)) + (((257, 131, 2),) if i < 2 else ()):
            yield ["bigsel", i, list(sh)]


def run(ctx, key):
    if key[0] == "seq":
        _, s, ctor, pre, n = key
        al = acts(s)
        for rest in itertools.product(range(len(al)), repeat=n):
            seq = [al[x] for x in list(pre) + list(rest)]
            with notebook():
                us = build(ctx, s, ctor)
                for i, (o, a) in enumerate(seq):
                    us[o].act(a)
                    for u in us:
                        u.judge(seq[:i + 1])
                for u in us:
                    u.use(seq)
            W.Widget.close_all() if hasattr(W.Widget, "close_all") else None
            ctx.trace()
    elif key[0] == "look":
        _, s, x = key
        al = acts(s)
        for tail in ([], [(0, "save")], [(1, "save")], [(1, "calc"), (1, "save")], [(1, "calc"), (1, "save"), (1, "type"), (1, "save")], [(0, "open"), (1, "open")],
                     [(1, "calc"), (1, "save"), (1, "open")]):
            if any(a not in ACTS[SETUPS[s][o]] for o, a in tail):
                continue
            seq = [al[x]] + tail
            with notebook():
                us = build(ctx, s, 0)
                for i, (o, a) in enumerate(seq):
                    us[o].act(a)
                    for u in us:
                        u.judge(seq[:i + 1])
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                for u in us:
                    u.look(str(seq))
            # the drawing of the selection itself, with real figures
            with notebook(fake=False), Shown() as sh:
                us = build(ctx, s, 0)
                sh.figs.clear()
                plt.close("all")
                o, a = al[x]
                us[o].act(a)
                figs = sh.figs + [plt.figure(k) for k in plt.get_fignums() if plt.figure(k) not in sh.figs]
            if a in ("sx", "last", "r", "rmax") and not tail:
                u = us[o]
                v = u.shown(u.sel[-1])
                p = panels(figs[-1])
                rt = v.get("region_type", "cubic")
                todo = ([v["background_center"]] if u.name == "CNR" else []) + [v["signal_center"]]
                for i, cc in enumerate(todo):
                    if u.d == 2:
                        judge(ctx, p[i], u.img, "selection after " + a, None, (cc, v["radius"], rt))
                    else:
                        for j, (want, pos) in enumerate(slices_of(u.img, cc)):
                            judge(ctx, p[3 * i + j], want, "selection after " + a, pos, (pos, v["radius"], rt))
            ctx.trace()
    elif key[0] == "moved":
        # the object is used for an image of another size after a selection was saved
        _, d, x = key
        for pre, fake in itertools.product(([], ["save"], ["calc"], ["calc", "save"], ["type", "save"], ["calc", "save", "type", "save"]), (True, False)):
            with notebook(fake=fake), Shown(), warnings.catch_warnings():
                warnings.simplefilter("ignore")
                us = build(ctx, 2 if d == 2 else 3, 0)
                u = us[1]
                for a in pre:
                    u.act(a)
                for sh in ((20, 22, 21), (24, 22, 23)):
                    u.img = image(sh[:d], "u1", 7, rng=90)
                    u.img[tuple(slice(2, n - 4) for n in sh[:d])] += 120
                    u.sel.clear()
                    u.open()
                    u.judge("%s, then an image of size %s" % (pre, sh))
                    u.act(ACTS["SNR"][x])
                    u.act("save")
                    u.judge("%s, then an image of size %s and %s" % (pre, sh, ACTS["SNR"][x]))
                    u.use("saving for another image")
                    plt.close("all")
            ctx.state(d, x, str(pre), fake)
            ctx.trace()
            W.Widget.close_all() if hasattr(W.Widget, "close_all") else None
    elif key[0] == "bigsel":
        # every radius from one to the largest offered one, each center at both ends of what is offered
        name, sh = ("CNR", "SNR")[key[1] % 2], tuple(key[2])[:2 + key[1] // 2]
        d = len(sh)
        img = image(sh, "u2", 3, 60000)
        top = min(sh) // 2
        for r in sorted({1, 2, 7, 8, 15, 16, 17, top - 2} & set(range(1, top - 1))):
            for end, r0 in itertools.product((0, 1), sorted({r, 1, top - 2})):
                kw = dict(signal_center=tuple(n // 2 for n in sh), radius=r0)
                if name == "CNR":
                    kw["background_center"] = tuple(n // 2 for n in sh)
                else:
                    kw["region_type"] = "cubic"
                with notebook():
                    u = User(ctx, name, img, kw, False)
                    s = u.sel[-1]
                    s.w["Radius"].value = r
                    for k, w in s.w.items():
                        if k[1:2] == "_":
                            w.value = (w.max if (k[0] in "xz") == bool(end) else w.min)
                            ctx.op()
                    u.judge("moving to the ends")
                    u.act("save")
                    u.judge("saving")
                    u.use("saving")
                ctx.state(name, sh, r, r0, end)
                ctx.trace()
                W.Widget.close_all() if hasattr(W.Widget, "close_all") else None
    else:
        # calling again with starting points; without a notebook the centers are only shown
        name = ("CNR", "SNR")[key[1] % 2]
        d = 2 + key[1] // 2
        img = image((12, 13, 14)[:d], "u1", 3)
        kw = dict(signal_center=(5, 6, 7)[:d], radius=2)
        if name == "CNR":
            kw["background_center"] = (6, 5, 6)[:d]
        else:
            kw["region_type"] = "cubic"
        with notebook():
            m = make(name, 255)
            for k in range(3):
                s = Selection(ctx, m, img, **kw)
                ctx.op()
                ctx.check(s.point("signal", d) == kw["signal_center"] and s.value("Radius") == 2, "selection opened again", k, s.point("signal", d))
                ctx.check(all(m.parameters[n] == v for n, v in kw.items()), "parameters", m.parameters)
            for bad, exc in ((dict(kw, signal_center=(5, 6, 7, 8)[:d + 1]), ValueError), (dict(kw, radius=2.5), TypeError), (dict(kw, radius=0), TypeError), (dict(kw, signal_center=(1,) * d, radius=3), ValueError)):
                ctx.op()
                ctx.raises(exc, lambda: make(name, 255).set_centers(img, **bad), "starting points %s" % bad)
        m = make(name, 255, **kw)
        before = dict(m.parameters)
        with Shown() as sh, warnings.catch_warnings():
            warnings.simplefilter("ignore")
            m.set_centers(img)
        ctx.op()
        ctx.check(len(sh.figs) == 1 and m.parameters == before, "selection without notebook")
        ctx.raises(ImportError, lambda: make(name, 255).set_centers(img), "selection without notebook and centers")
        ctx.trace()
