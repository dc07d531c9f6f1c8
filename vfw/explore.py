"""Explorer: enumerates the key space of one property on the real code.

A property module (checks/<id>.py) provides
  RULE        what is enumerated and within which bounds,
  keys(tier)  a deterministic generator of JSON-able keys, the bounded space,
  run(ctx,k)  executes one key on the implementation and compares with the model.
The key space is split over forked workers by index; every key is executed.
"""
import hashlib
import importlib
import json
import os
import shutil
import sys
import time
import traceback
import signal

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, VERIF)
HANG = 150.0
LIMIT = {"quick": 780.0, "thorough": 6 * 3600.0}


class Violation(Exception):
    pass


def install_finder():
    """Import viqa from the tree under test (no bytecode, fresh C extension)."""
    import importlib.machinery as im
    import importlib.util as iu
    repo, ext = os.environ["VERIF_REPO"], os.environ["VERIF_EXT"]
    src = os.path.join(repo, "src")

    class Loader(im.SourceFileLoader):
        def get_code(self, fullname):
            path = self.get_filename(fullname)
            data = self.get_data(path)
            if fullname in ("viqa", "viqa.nr_metrics"):
                # as the sandbox' start-up hook: QMeasure cannot be built here
                import ast
                import viqa_leave_out
                return compile(viqa_leave_out._DropQMeasure().visit(ast.parse(data, path)),
                               path, "exec", dont_inherit=True)
            return self.source_to_code(data, path)

    class Finder:
        @staticmethod
        def find_spec(name, path=None, target=None):
            if name == "viqa.fr_metrics.stat_utils.statisticscalc":
                return iu.spec_from_file_location(name, ext)
            if name != "viqa" and not name.startswith("viqa."):
                return None
            if name == "viqa.nr_metrics.qmeasure":
                return None  # left out by the sandbox' own start-up hook
            base = os.path.join(src, *name.split("."))
            if os.path.isfile(os.path.join(base, "__init__.py")):
                f = os.path.join(base, "__init__.py")
                return iu.spec_from_file_location(
                    name, f, loader=Loader(name, f), submodule_search_locations=[base])
            if os.path.isfile(base + ".py"):
                return iu.spec_from_file_location(name, base + ".py", loader=Loader(name, base + ".py"))
            return None

    sys.meta_path.insert(0, Finder)


class Ctx:
    def __init__(self, tier, scratch):
        self.tier, self.scratch = tier, scratch
        self.transitions = self.traces = 0
        self.states = set()
        self.samples = []
        self._n = 0
        self._tmp = None

    # --- accounting
    def op(self, n=1):
        self.transitions += n

    def state(self, *tok):
        self.states.add(hashlib.blake2b(repr(tok).encode(), digest_size=8).digest())

    def trace(self, n=1):
        self.traces += n

    # --- scratch
    def tmp(self):
        if self._tmp is None:
            self._n += 1
            self._tmp = os.path.join(self.scratch, "k%d" % self._n)
            os.makedirs(self._tmp)
        return self._tmp

    def cleanup(self):
        if self._tmp:
            shutil.rmtree(self._tmp, ignore_errors=True)
            self._tmp = None

    # --- oracles
    def check(self, cond, *msg):
        if not cond:
            raise Violation(" ".join(str(m) for m in msg))

    def close(self, got, want, msg="", rtol=1e-6, atol=1e-9):
        import numpy as np
        g, w = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
        if g.shape != w.shape:
            raise Violation("%s: shape %s, expected %s" % (msg, g.shape, w.shape))
        if not np.allclose(g, w, rtol=rtol, atol=atol, equal_nan=True):
            raise Violation("%s: got %r, expected %r" % (msg, _short(g), _short(w)))

    def raises(self, exc, fn, msg=""):
        try:
            r = fn()
        except exc as e:
            return e
        raise Violation("%s: expected %s, got result %r" % (msg, exc, _short(r)))


def _short(a):
    s = repr(a)
    return s if len(s) < 400 else s[:400] + "..."


def canon(k):
    return json.loads(json.dumps(k, default=str))


def worker(mod, tier, idx, n, scratch, limit, only=None):
    """Runs in a forked process; writes w<idx>.json and exits."""
    hb = os.path.join(scratch, "hb%d" % idx)
    sc = os.path.join(scratch, "w%d" % idx)
    os.makedirs(sc, exist_ok=True)
    os.chdir(sc)
    try:  # an allocation gone wild becomes a MemoryError of this key, not the end of the sandbox
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (24 << 30, resource.getrlimit(resource.RLIMIT_AS)[1]))
    except (ImportError, ValueError, OSError):
        pass
    ctx = Ctx(tier, sc)
    out = dict(violations=[], complete=True, keys=0)
    t_end = time.time() + limit

    def dump():
        out.update(transitions=ctx.transitions, traces=ctx.traces,
                   states=[s.hex() for s in ctx.states], samples=ctx.samples)
        with open(os.path.join(scratch, "w%d.json" % idx), "w") as f:
            json.dump(out, f, default=str)

    def one(i, k):
        with open(hb, "w") as f:
            json.dump([i, canon(k)], f)
        before = (ctx.transitions, ctx.traces)
        try:
            mod.run(ctx, k)
        except Violation as e:
            out["violations"].append(dict(index=i, key=canon(k), msg=str(e)))
        except Exception:
            out["violations"].append(dict(index=i, key=canon(k), msg=traceback.format_exc()[-3000:]))
        ctx.cleanup()
        out["keys"] += 1
        if len(ctx.samples) < 2:
            ctx.samples.append(dict(key=canon(k), transitions=ctx.transitions - before[0],
                                    traces=ctx.traces - before[1]))

    if only is not None:
        one(0, only)
    else:
        for i, k in enumerate(mod.keys(tier)):
            if i % n != idx:
                continue
            if time.time() > t_end:
                out["complete"] = False
                break
            one(i, k)
            if len(out["violations"]) >= 3:
                out["complete"] = False
                break
    try:
        os.unlink(hb)
    except OSError:
        pass
    dump()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(0)


def main():
    pid, tier, outfile = sys.argv[1:4]
    only = None
    if "--replay" in sys.argv:
        with open(sys.argv[sys.argv.index("--replay") + 1]) as f:
            rec = json.load(f)
        only, tier = rec["key"], rec.get("tier", tier)
    scratch = os.environ["VERIF_SCRATCH"]
    install_finder()
    import warnings
    warnings.simplefilter("ignore")
    res = dict(violations=[])
    try:
        import numpy as np
        np.seterr(all="ignore")
        import tqdm
        tqdm.tqdm.monitor_interval = 0
        import viqa  # noqa: F401
        warnings.resetwarnings()
        warnings.simplefilter("ignore")
    except Exception:
        res["violations"].append(dict(key=None, msg="viqa cannot be imported:\n" + traceback.format_exc()))
        with open(outfile, "w") as f:
            json.dump(res, f)
        return
    mod = importlib.import_module("checks." + pid.lower())
    if hasattr(mod, "prepare"):
        mod.prepare(tier)
    n = 1 if only is not None else min(getattr(mod, "WORKERS", 8), os.cpu_count() or 8)
    limit = LIMIT[tier]
    procs = {}
    for idx in range(n):
        sys.stdout.flush()
        sys.stderr.flush()
        p = os.fork()
        if p == 0:
            try:
                worker(mod, tier, idx, n, scratch, limit, only)
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(97)
        procs[p] = idx
    seen = {}
    while procs:
        p, st = os.waitpid(-1, os.WNOHANG)
        if p in procs:
            idx = procs.pop(p)
            if not (os.WIFEXITED(st) and os.WEXITSTATUS(st) == 0):
                key = _hb(scratch, idx)
                res["violations"].append(dict(index=key[0], key=key[1],
                                              msg="the process died with wait status %d" % st))
            continue
        time.sleep(0.05)
        now = time.time()
        for q, idx in list(procs.items()):
            cur = _hb(scratch, idx)
            if cur[1] is None:
                continue
            if seen.get(idx, (None,))[0] != cur:
                seen[idx] = (cur, now)
            elif now - seen[idx][1] > getattr(mod, "HANG", HANG):
                os.kill(q, signal.SIGKILL)
                os.waitpid(q, 0)
                procs.pop(q)
                res["violations"].append(dict(index=cur[0], key=cur[1], msg="no result after %d s" % (now - seen[idx][1])))
    states, tr, traces, keys, samples, complete = set(), 0, 0, 0, [], True
    for idx in range(n):
        f = os.path.join(scratch, "w%d.json" % idx)
        if not os.path.exists(f):
            complete = False
            continue
        with open(f) as fh:
            w = json.load(fh)
        res["violations"] += w["violations"]
        states.update(w["states"])
        tr += w["transitions"]
        traces += w["traces"]
        keys += w["keys"]
        complete &= w["complete"]
        samples += w["samples"][:1]
    res["violations"].sort(key=lambda v: v.get("index") or 0)
    res["coverage"] = dict(states=len(states), transitions=tr, traces_validated_against_impl=traces,
                           keys=keys, exhaustive=complete, rule=mod.RULE,
                           samples=samples[:4])
    res["assumptions"] = list(getattr(mod, "ASSUMPTIONS", []))
    with open(outfile, "w") as f:
        json.dump(res, f, default=str)


def _hb(scratch, idx):
    try:
        with open(os.path.join(scratch, "hb%d" % idx)) as f:
            return tuple(json.load(f))
    except (OSError, ValueError):
        return (None, None)


if __name__ == "__main__":
    main()
