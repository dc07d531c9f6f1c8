"""C21: comparison, printing and fusion of metrics (explicit enumeration of values, operands and histories)."""
import itertools
import math
import operator
import warnings

import numpy as np
import viqa

from .common import FR, METRICS, NR, captured, image, make, nr_kw

RULE = ("Explicit enumeration on the real code: all ordered pairs of scores from a set of special and ordinary values x all six comparison operators x operand kinds (metric-metric of every class pair "
        "kind, metric-number, number-metric); all metric classes x values x decimals for printing and text form; all lists of up to three metrics x weights, lists of up to 129 metrics with a deviating weight at every position, all length mismatches up to 4 and all subsets of unscored metrics for fusion; "
        "all histories of depth 4 over (score pair 1, score pair 2, compare, print, fuse) on two live metric objects. States: (scores, operation); transitions: operations; traces: comparisons with the scores.")

OPS = {"==": operator.eq, "!=": operator.ne, "<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge}
VALS = [0.0, -0.0, 1.0, 1, -1.5, 0.1 + 0.2, 0.3, 1e-300, 1e300, math.inf, -math.inf, math.nan, np.float32(0.3), np.float64(2.5), 2.5, np.int64(3), 1 + 1e-9, 99.999, 12.345]
NAMES = {m: m for m in METRICS}
NAMES["MSSSIM"] = "MS-SSIM"
ALL = FR + NR


def keys(tier):
    for i in range(len(VALS)):
        yield ["cmp", i]
    for m in ALL:
        yield ["classes", m]
        yield ["print", m]
    for n in range(0, 4 if tier == "quick" else 5):
        for first in range(len(VALS)) if n else [0]:
            yield ["fuse", n, first]
    yield ["mismatch"]
    for n in [*range(4, 14), 17, 33, 64, 129] if tier == "quick" else range(4, 140):
        yield ["long", n]
    for pair in itertools.product(range(5), repeat=2):
        yield ["hist", list(pair)]


def with_score(name, v):
    m = make(name)
    m.score_val = v
    return m


def same(a, b):
    a, b = float(a), float(b)
    return math.isnan(a) and math.isnan(b) or a == b or math.isclose(a, b, rel_tol=1e-9)


def printed(m, **kw):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        _, out = captured(lambda: m.print_score(**kw))
    return out, [x for x in w if issubclass(x.category, RuntimeWarning) and "score" in str(x.message).lower()]


def judge_print(ctx, m, name, v, **kw):
    out, w = printed(m, **kw)
    ctx.op()
    lines = [x for x in out.splitlines() if x.strip()]
    ctx.check(len(lines) == 1 and ":" in lines[0] and not w, name, "printed", repr(out), "with warnings", [str(x.message) for x in w])
    label, val = lines[0].rsplit(":", 1)
    ctx.check(label.strip() == NAMES[name], name, "printed under the name", repr(label))
    want = np.round(v, kw.get("decimals", 2))
    ctx.check(same(val, want) or math.isclose(float(val), float(want), rel_tol=1e-6 if isinstance(v, np.float32) else 1e-12), name, "score", v, kw, "printed as", val, "expected", want)
    text = repr(m)
    ctx.check(name in text and str(v) in text, name, "text form", text, "of score", v)
    ctx.trace()


def run(ctx, key):
    kind = key[0]
    if kind == "cmp":
        a = VALS[key[1]]
        for b in VALS:
            for sym, op in OPS.items():
                want = bool(op(a, b))
                ma, mb = with_score("RMSE", a), with_score("PSNR", b)
                for what, got in (("metric %s metric", op(ma, mb)), ("metric %s number", op(ma, b)), ("number %s metric", op(a, mb))):
                    ctx.op()
                    ctx.check(bool(got) == want, what % sym, "with scores", repr(a), repr(b), "gives", got)
                ctx.state(key[1], repr(b), sym)
                ctx.trace()
        m = with_score("SSIM", a)
        ctx.check(not bool(m == None) and bool(m != None), "comparison with None")  # noqa: E711
        for sym, op in OPS.items():
            ctx.op()
            ctx.check(bool(op(m, m)) == bool(op(a, a)), "metric", sym, "itself with score", a)
    elif kind == "classes":
        for other in ALL:
            for a, b in itertools.product((0.25, 0.75), repeat=2):
                for sym, op in OPS.items():
                    got = op(with_score(key[1], a), with_score(other, b))
                    ctx.op()
                    ctx.state(key[1], other, a, b, sym)
                    ctx.check(bool(got) == op(a, b), key[1], sym, other, a, b, "gives", got)
            ctx.trace()
            # without scores only (in)equality is defined
            ctx.check(bool(make(key[1]) == make(other)) and not bool(make(key[1]) != make(other)), "unscored metrics")
            ctx.check(not bool(make(key[1]) == with_score(other, 0.0)) and bool(make(key[1]) != with_score(other, 0.0)), "unscored and scored metric")
            for op in (operator.lt, operator.le, operator.gt, operator.ge):
                ctx.raises(TypeError, lambda: op(make(key[1]), with_score(other, 0.0)), "ordering of unscored metric")
    elif kind == "print":
        name = key[1]
        for v in VALS + [0.005, 0.015, -0.0049, 1234.5678, 5e-7]:
            for kw in [{}] + [{"decimals": d} for d in range(-3, 8)]:
                if isinstance(v, (int, np.integer)) and kw.get("decimals", 2) < 0:
                    continue
                judge_print(ctx, with_score(name, v), name, v, **kw)
                ctx.state(name, repr(v), str(kw))
        out, w = printed(make(name))
        ctx.op()
        ctx.check(not out.strip() and len(w) == 1, name, "without score printed", repr(out), "warnings", len(w))
        text = repr(make(name))
        ctx.check(name in text and "None" in text, "text form without score", text)
    elif kind == "fuse":
        n, first = key[1], key[2]
        wts = [0, 1, -2.5, 0.3]
        vals = [VALS[first]] if n else []
        rest = list(itertools.product([0.5, -3.0, np.float32(0.1), 7], repeat=max(0, n - 1)))
        for r in rest:
            sc = vals + list(r)
            for w in itertools.product(wts, repeat=n):
                ms = [with_score(ALL[(first + i) % len(ALL)], v) for i, v in enumerate(sc)]
                want = 0
                for v, x in zip(sc, w):
                    want = want + v * x
                for conv in (list, tuple):
                    got = viqa.fuse_metrics_linear_combination(conv(ms), conv(w))
                    ctx.op()
                    ctx.state(first, r, w)
                    ctx.check(same(got, want) or math.isclose(float(got), float(want), rel_tol=1e-6, abs_tol=1e-12), "fusion of", sc, "with", w, "gives", got, "expected", want)
                    ctx.trace()
                ctx.check(all(m.score_val is v for m, v in zip(ms, sc)), "score changed")
    elif kind == "long":
        # long lists: every position carries its own weight; one deviating weight or score at every position
        n = key[1]
        for base, vary in itertools.product((0.0, 1.0, -0.37), range(n)):
            sc = [((i * 7 + 3) % 11) / 4 - 1 for i in range(n)]
            w = [base] * n
            w[vary] = 2.5
            if base:
                w = [x * (1 + i % 3) for i, x in enumerate(w)]
            ms = [with_score(ALL[(vary + i) % len(ALL)], v) for i, v in enumerate(sc)]
            want = math.fsum(v * x for v, x in zip(sc, w))
            for conv in (list, tuple, np.array):
                got = viqa.fuse_metrics_linear_combination(ms, conv(w))
                ctx.op()
                ctx.check(math.isclose(float(got), want, rel_tol=1e-9, abs_tol=1e-9), "fusion of", n, "metrics, scores", sc, "weights", w, "gives", got, "instead of", want)
            ctx.state("long", n, base, vary)
            ctx.trace()
        for bad in (n - 1, n + 1, 2 * n, 0):
            ctx.raises(ValueError, lambda: viqa.fuse_metrics_linear_combination(ms, [1.0] * bad), "fusion of %d metrics with %d weights" % (n, bad))
        same_m = with_score("RMSE", 0.75)
        got = viqa.fuse_metrics_linear_combination([same_m] * n, [1.0] * n)
        ctx.check(math.isclose(float(got), 0.75 * n, rel_tol=1e-9), "fusion of one metric", n, "times", got)
    elif kind == "mismatch":
        for i, j in itertools.product(range(5), repeat=2):
            ms = [with_score("RMSE", 1.0) for _ in range(i)]
            for conv in (list, tuple, np.array):
                w = conv([0.5] * j)
                ctx.op()
                ctx.state(i, j)
                if i != j:
                    ctx.raises(ValueError, lambda: viqa.fuse_metrics_linear_combination(ms, w), "fusion of %d metrics with %d weights" % (i, j))
                else:
                    ctx.close(viqa.fuse_metrics_linear_combination(ms, w), 0.5 * i, "fusion")
                ctx.trace()
        # a metric without score has nothing to be fused
        for name, n in itertools.product(ALL, range(1, 5)):
            for un in range(1, 2 ** n):
                ms = [make(name) if un >> i & 1 else with_score(name, 0.5 + i) for i in range(n)]
                for w in ([0.5] * n, [0.0] * n):
                    ctx.op()
                    ctx.state("unscored", name, n, un, w[0])
                    ctx.raises((TypeError, ValueError), lambda: viqa.fuse_metrics_linear_combination(ms, w), "fusion of metrics without score")
                    ctx.trace()
    else:
        pairs = [(image((8, 9), "u1", s), image((8, 9), "u1", s + 7)) for s in (1, 2)]
        acts = ["s0p0", "s1p1", "s0p1", "s1p0", "fresh"]
        for seq in itertools.product(range(len(acts)), repeat=2 if ctx.tier == "quick" else 3):
            for A, B in (("RMSE", "PSNR"), ("SSIM", "CNR")):
                ms = [make(A), make(B)]
                sc = [None, None]
                for a in list(key[1]) + list(seq):
                    act = acts[a]
                    if act == "fresh":
                        ms[0], sc[0] = make(A), None
                    else:
                        i, p = int(act[1]), int(act[3])
                        name = (A, B)[i]
                        r = ms[i].score(pairs[p][0], **nr_kw(name, 2)) if name in NR else ms[i].score(*pairs[p], **METRICS[name]["kw"])
                        sc[i] = r
                    ctx.op()
                    ctx.check(bool(ms[0] == ms[1]) == (sc[0] == sc[1]) and bool(ms[0] != ms[1]) == (sc[0] != sc[1]), "equality after", seq)
                    if None not in sc:
                        for sym, op in OPS.items():
                            ctx.check(bool(op(ms[0], ms[1])) == bool(op(sc[0], sc[1])), sym, "after history", key, seq)
                            ctx.check(bool(op(ms[0], float(sc[1]))) == bool(op(sc[0], float(sc[1]))), sym, "with number after history", key, seq)
                        got = viqa.fuse_metrics_linear_combination(ms, [0.25, -2])
                        ctx.check(math.isclose(got, sc[0] * 0.25 - 2 * sc[1], rel_tol=1e-6), "fusion after history", key, seq, got, sc)
                    for m, n, v in zip(ms, (A, B), sc):
                        if v is not None:
                            judge_print(ctx, m, n, v, decimals=3)
                    ctx.state(A, tuple(map(str, sc)))
                ctx.trace()
