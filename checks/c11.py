"""C11: exports and pair lists keep values and associations (explicit enumeration, round trip)."""
import csv
import io
import itertools
import math
import os

import numpy as np
import viqa

from .common import METRICS, captured, image, make, nr_kw, write_img

RULE = ("Explicit enumeration with round trip on the real code: all metric lists of length up to 3 x scored/unscored x all score values of an alphabet of extremes; batch and single-pair "
        "tables for all result sets and file names (separators, quotes, spaces, unicode); all report flag combinations x project names; pair lists for every separator x "
        "column order x extra columns x line end x quoting. The parsed files must equal the recorded data. States: configurations; transitions: export/parse calls; traces: files compared.")

NM = {"MSSSIM": "MS-SSIM"}
VALS = [0.0, -0.0, 1.0, 0.1 + 0.2, 1 / 3, 1e-300, 5e-324, 1.7e308, -12345.678901234567, math.inf, -math.inf, math.nan, 255, 2 ** 53 + 1]
NAMES = ["a.png", "a b.png", "a,b.png", "a;b.png", "ünï.png", "sub/dir.png", "a\tb.png", "0", "-1.5", "'x'.png", "x" * 120 + ".raw"]


def keys(tier):
    ms = ["RMSE", "PSNR", "SSIM", "CNR", "MSSSIM"]
    n = 2 if tier == "quick" else 3
    for k in range(1, n + 1):
        for names in itertools.permutations(ms, k):
            yield ["metrics", list(names)]
    for m in METRICS:
        yield ["one", m]
    for i in range(len(VALS)):
        yield ["single", i]
        yield ["batch", i]
    for n in [1, 2, 3, 4, 5, 30, 260]:
        yield ["many", n]
    for i in range(len(NAMES)):
        yield ["names", i]
    for flags in itertools.product((0, 1), repeat=4):
        for proj in (None, "proj", "a b.c"):
            yield ["report", list(flags), proj]
    for flags in itertools.product((0, 1), repeat=2):
        for proj in (None, "proj"):
            yield ["breport", list(flags), proj, 0]
    yield ["breport", [1, 1], "p", 1]
    yield ["breport", [0, 0], None, 1]
    yield ["meta"]
    cols = ["reference_image", "modified_image", "id", "comment"]
    for k in (2, 3, 4):
        for order in itertools.permutations(cols, k):
            if "reference_image" in order and "modified_image" in order:
                yield ["pairs", list(order)]
    for dec in range(0, 7):
        yield ["print", dec]


def eq(a, b):
    a, b = float(a), float(b)
    return (math.isnan(a) and math.isnan(b)) or (a == b and math.copysign(1, a) == math.copysign(1, b))


def read(p):
    with open(p, newline="") as f:
        return list(csv.reader(f))


def below(folder, f):
    """f() with the folder as working directory"""
    old = os.getcwd()
    os.chdir(folder)
    try:
        return f()
    finally:
        os.chdir(old)


WHERE = (lambda d: dict(file_path=d), lambda d: dict(file_path=None), lambda d: {})  # given folder, working directory


def run(ctx, key):
    kind = key[0]
    t = ctx.tmp()
    if kind == "metrics":
        names = key[1]
        for scored in itertools.product((0, 1), repeat=len(names)):
            for v0 in range(len(VALS)):
                objs = [make(n) for n in names]
                for i, (o, s) in enumerate(zip(objs, scored)):
                    if s:
                        o.score_val = VALS[(v0 + i) % len(VALS)]
                vals = [o.score_val for o in objs]
                fn = ("r.csv", "r", "R.CSV")[v0 % 3]
                ret = viqa.export_results(objs, t, fn, return_dict=True)
                ctx.op()
                ctx.state("metrics", tuple(names), scored, v0)
                p = os.path.join(t, fn if fn.lower().endswith(".csv") else fn + ".csv")
                rows = read(p)
                os.unlink(p)
                ctx.check(os.listdir(t) == [], "unexpected files", os.listdir(t))
                want = [(NM.get(x, x), v) for x, v, s in zip(names, vals, scored) if s]
                ctx.check(len(rows) == len(want) + 1, "rows", rows)
                for row, (n, v) in zip(rows[1:], want):
                    ctx.check(row[0] == n and eq(row[1], v), "exported", row, "recorded", n, v)
                ctx.check(list(ret) == [NM.get(x, x) for x in names], "returned metrics", list(ret))
                for x, o, s, v in zip(names, objs, scored, vals):
                    x = NM.get(x, x)
                    ctx.check(ret[x] == "n/a" if not s else eq(ret[x], v), "returned value", ret)
                    ctx.check(o.score_val is v, "export changed the score to", o.score_val)
                ctx.trace()
    elif kind == "one":
        m = key[1]
        sh = METRICS[m]["shape"]
        obj = make(m)
        obj.export_results(t, "u.csv")
        ctx.check(obj.score_val is None and len(read(os.path.join(t, "u.csv"))) == 1, "unscored metric exported", obj.score_val)
        a, b = image(sh, "u1", 1), image(sh, "u1", 2)
        if METRICS[m].get("nr"):
            obj.score(a, **nr_kw(m, 2))
        else:
            obj.score(a, b, **METRICS[m]["kw"])
        obj.export_results(t, "x")
        rows = read(os.path.join(t, "x.csv"))
        ctx.op(3)
        ctx.state("one", m)
        ctx.check(len(rows) == 2 and rows[0] == ["Metric", "Value"], "table", rows)
        ctx.check(rows[1][0] == {"MSSSIM": "MS-SSIM"}.get(m, m), "name", rows[1][0])
        ctx.close(float(rows[1][1]), float(obj.score_val), "value", rtol=1e-7 if m in ("GSM", "UQI", "SSIM") else 0, atol=0)
        ctx.trace()
        if m == "SNR":
            for nm in ("SNR_bone", "S", "a,b", "SNR_r", "äö"):
                for v in VALS:
                    o, o2 = make(m, name=nm), make(m)
                    o.score_val, o2.score_val = v, 7.5
                    ret = viqa.export_results([o, o2], t, "c.csv", return_dict=True)
                    ctx.op()
                    ctx.state("named", nm, repr(v))
                    rows = read(os.path.join(t, "c.csv"))
                    ctx.check([r[0] for r in rows[1:]] == [nm, "SNR"] and eq(rows[1][1], v) and eq(rows[2][1], 7.5), "named metric", rows)
                    ctx.check(list(ret) == [nm, "SNR"] and eq(ret[nm], v), "named metric", ret)
                    ctx.trace()
        if m in ("RMSE", "PSNR", "FSIM"):
            o = make(m, chromatic=True)
            o.score_val = 1.5
            o.export_results(t, "c.csv")
            ctx.op()
            ctx.check(read(os.path.join(t, "c.csv"))[1] == [m + "c", "1.5"], "chromatic name")
            ctx.trace()
    elif kind == "single":
        v0 = key[1]
        for n in range(1, 6):
            names = ["RMSE", "CNR_r", "CNR_m", "SSIM", "PSNR"][:n]
            mm = viqa.MultipleMetrics([make("RMSE")], [{}])
            mm.results = {x: VALS[(v0 + i) % len(VALS)] for i, x in enumerate(names)}
            keep = dict(mm.results)
            mm.export_results(t, "res.csv")
            ctx.op()
            ctx.state("single", v0, n)
            rows = read(os.path.join(t, "res.csv"))
            ctx.check(len(rows) == 2 and rows[0] == names, "header", rows)
            ctx.check(all(eq(x, y) for x, y in zip(rows[1], keep.values())) and len(rows[1]) == n, "values", rows[1], keep)
            ctx.check(list(map(repr, mm.results.values())) == list(map(repr, keep.values())), "results changed")
            ctx.trace()
    elif kind in ("batch", "many", "names"):
        if kind == "many":
            n = key[1]
            prs = [(NAMES[i % len(NAMES)], NAMES[(2 * i + 1) % len(NAMES)]) for i in range(4 * n)]
        elif kind == "names":
            prs = [(NAMES[key[1]], x) for x in NAMES] + [(x, NAMES[key[1]]) for x in NAMES]
        else:
            prs = [("a.png", "b.png"), ("b.png", "c.png")]
        p = os.path.join(t, "p.csv")
        with open(p, "w", newline="") as f:
            w = csv.writer(f)
            w.writerow(["reference_image", "modified_image"])
            w.writerows(prs)
        for names in (["RMSE"], ["CNR_r", "CNR_m", "RMSE"]):
            bm = viqa.BatchMetrics(t, p, [make("RMSE")], [{}])
            ctx.op()
            ctx.check([(x["reference_image"], x["modified_image"]) for x in bm.pairs] == prs, "pair list", bm.pairs[:3], prs[:3])
            v0 = key[1] if kind == "batch" else 3
            bm.results = {str(i): {x: VALS[(v0 + 3 * i + j) % len(VALS)] for j, x in enumerate(names)} for i in range(len(prs))}
            bm.export_results(t, "res.csv")
            ctx.op()
            ctx.state(*key, len(names))
            rows = read(os.path.join(t, "res.csv"))
            ctx.check(rows[0] == ["pair_num", "reference_image", "modified_image"] + names, "header", rows[0])
            ctx.check(len(rows) == len(prs) + 1, "number of rows", len(rows))
            for i, (pr, row) in enumerate(zip(prs, rows[1:])):
                ctx.check(row[0] == str(i) and tuple(row[1:3]) == pr, "row", row, "pair", i, pr)
                ctx.check(len(row) == 3 + len(names) and all(eq(x, y) for x, y in zip(row[3:], bm.results[str(i)].values())), "values", row)
            ctx.trace(len(prs))
    elif kind == "report":
        _, (c, m, txt, im), proj = key
        a, b = image((12, 13), "u1", 1), image((12, 13), "u1", 2)
        for exp, w in itertools.product((0, 1), range(3)):
            if exp and not im:
                continue
            d = os.path.join(t, "o%d%d" % (exp, w))
            os.makedirs(d)
            mm = viqa.MultipleMetrics([make("RMSE"), make("PSNR"), make("CNR")], [{}, {}, nr_kw("CNR", 2)])
            res = dict(mm.calculate(a, b))
            kw = dict(img_r=a, img_m=b, export_image=bool(exp), dpi=30) if im else {}
            _, out = captured(lambda: below(d, lambda: mm.report(csv=bool(c), metadata=bool(m), text=bool(txt), image=bool(im), project_name=proj, **WHERE[w](d), **kw)))
            import matplotlib.pyplot as plt
            plt.close("all")
            ctx.op(2)
            ctx.state("report", c, m, txt, im, exp, proj, w)
            pre = "" if proj is None else proj + "_"
            want = set()
            if c:
                want.add(pre + "results.csv")
            if m:
                want.add(pre + "metadata.txt")
            if im and exp:
                want.add(pre + "image_comparison.png")
            ctx.check(set(os.listdir(d)) == want, "files", sorted(os.listdir(d)), "expected", sorted(want))
            ctx.check(all(os.path.getsize(os.path.join(d, x)) for x in want), "empty file")
            if c:
                rows = read(os.path.join(d, pre + "results.csv"))
                ctx.check(rows[0] == list(res) and [float(x) for x in rows[1]] == list(res.values()), "results", rows)
            lines = [x for x in out.splitlines() if x.strip()]
            wl = ["%s: %.2f" % kv for kv in res.items()] if txt else []
            ctx.check(lines == wl, "printed", lines, "expected", wl)
            ctx.trace()
    elif kind == "breport":
        _, (c, m), proj, im = key
        write_img(t, "a", image((12, 13), "u1", 1), ".png")
        write_img(t, "b", image((12, 13), "u1", 2), ".png")
        p = os.path.join(t, "p.csv")
        with open(p, "w") as f:
            f.write("reference_image,modified_image\na.png,b.png\nb.png,a.png\n")
        for w in range(3):
            d = os.path.join(t, "out%d" % w)
            os.makedirs(d)
            bm = viqa.BatchMetrics(t, p, [make("RMSE"), make("CNR")], [{}, nr_kw("CNR", 2)])
            res = bm.calculate()
            below(d, lambda: bm.report(csv=bool(c), metadata=bool(m), image=bool(im), project_name=proj, **WHERE[w](d), **({"dpi": 30} if im else {})))
            import matplotlib.pyplot as plt
            plt.close("all")
            ctx.op(2)
            ctx.state(*key[1], proj, im, w)
            pre = "" if proj is None else proj + "_"
            want = set()
            if c:
                want.add(pre + "results.csv")
            if m:
                want.add(pre + "metadata.txt")
            if im:
                want |= {pre + "image_comparison_%d.png" % i for i in range(2)}
            ctx.check(set(os.listdir(d)) == want, "files", sorted(os.listdir(d)), "expected", sorted(want))
            if c:
                rows = read(os.path.join(d, pre + "results.csv"))
                for i in range(2):
                    ctx.check([float(x) for x in rows[1 + i][3:]] == list(res[str(i)].values()), "results", rows)
            ctx.trace()
    elif kind == "meta":
        sets = [{}, dict(win_size=3), dict(block_size=4, weights=[1, 2, 3], thresh_1=None), nr_kw("CNR", 3), dict(dim=2, im_slice=-1, text="a: b"),
                dict(luminance_function={"k": 0.1, "gamma": 2.0})]
        for ms in itertools.product(["RMSE", "MAD", "CNR", "MSSSIM"], repeat=2):
            for ps in itertools.product(range(len(sets)), repeat=2):
                for R in (255, 1, 65535):
                    objs = [make(ms[0], R), make(ms[1], 255)]
                    viqa.export_metadata(objs, [sets[i] for i in ps], t, "m.txt")
                    ctx.op()
                    ctx.state("meta", ms, ps, R)
                    with open(os.path.join(t, "m.txt")) as f:
                        lines = [x.strip() for x in f.read().splitlines()]
                    ctx.check(lines[0] == "vIQA_version: " + __import__("importlib.metadata").metadata.version("viqa"), "version", lines[0])
                    pos = 0
                    for nm, i, rr in zip(ms, ps, (R, 255)):
                        try:
                            pos = lines.index(nm, pos) + 1
                        except ValueError:
                            ctx.check(False, "metric", nm, "missing in", lines)
                        end = lines.index("", pos)
                        block = lines[pos:end]
                        want = ["data_range: %s" % rr] + ["%s: %s" % kv for kv in sets[i].items()]
                        got = [x for x in block if set(x) != {"-"}]
                        ctx.check(sorted(got) == sorted(want), "metadata of", nm, got, "expected", want)
                        pos = end
                    ctx.trace()
    elif kind == "pairs":
        order = key[1]
        data = [dict(reference_image=r, modified_image=m, id=str(i), comment="c %d" % i)
                for i, (r, m) in enumerate(itertools.product(["a.png", "b 1.raw", "x_2x2x2_8bit.raw"], ["m.mhd", "n-1.nii.gz", "ö.png"]))]
        for sep, nl, final, quote in itertools.product(",;\t", ("\n", "\r\n"), (True, False), (False, True)):
            for special in (False, True):
                rows = [dict(x) for x in data]
                if special:
                    for x in rows:
                        for oth in ",;":
                            if oth != sep:
                                x["modified_image"] = "p" + oth + x["modified_image"]
                buf = io.StringIO()
                w = csv.writer(buf, delimiter=sep, lineterminator=nl, quoting=csv.QUOTE_MINIMAL)
                w.writerow(order)
                w2 = csv.writer(buf, delimiter=sep, lineterminator=nl, quoting=csv.QUOTE_ALL if quote else csv.QUOTE_MINIMAL)
                for x in rows:
                    w2.writerow([x[c] for c in order])
                text = buf.getvalue()
                if not final:
                    text = text[:-len(nl)]
                p = os.path.join(t, "p.csv")
                with open(p, "w", newline="") as f:
                    f.write(text)
                bm = viqa.BatchMetrics(t, p, [make("RMSE")], [{}])
                ctx.op()
                ctx.state("pairs", tuple(order), sep, nl, final, quote, special)
                got = [(x["reference_image"], x["modified_image"]) for x in bm.pairs]
                ctx.check(got == [(x["reference_image"], x["modified_image"]) for x in rows], "separator %r order %s" % (sep, order), got[:2])
                ctx.trace()
    elif kind == "print":
        dec = key[1]
        for v in VALS:
            mm = viqa.MultipleMetrics([make("RMSE")], [{}])
            mm.results = {"RMSE": v, "CNR_r": 2 * v}
            _, out = captured(lambda: mm.print_values(decimals=dec))
            ctx.op()
            ctx.state("print", dec, repr(v))
            ctx.check(out.splitlines() == ["RMSE: %.*f" % (dec, v), "CNR_r: %.*f" % (dec, 2 * v)], "printed", out)
            ctx.trace()
    _ = np
