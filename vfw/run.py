#!/usr/bin/env python3
"""Entry point of every check: ``run.py <property> [quick|thorough]``.

Parent process.  Prepares a scratch directory, compiles the C extension of the
tree under /repo into it, and starts the explorer (vfw/explore.py) with the
interpreter the repository is built for.  The explorer enumerates the bounded
space of the property on the real code; this process turns its outcome into
the evidence file, the VIOLATION / KNOWN-FINDING lines and the exit code.

Exit 0: the property held on everything explored.  Exit 1: VIOLATION printed.
"""
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"


def child_env(scratch):
    env = dict(os.environ)
    env.update(
        LANG="C.UTF-8", LC_ALL="C.UTF-8", TZ="UTC", PYTHONDONTWRITEBYTECODE="1",
        PYTHONHASHSEED="0", PYTHONNOUSERSITE="1", MPLBACKEND="Agg",
        MPLCONFIGDIR=os.path.join(scratch, "mpl"), OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", TQDM_DISABLE="",
        VERIF_REPO=REPO, VERIF_SCRATCH=scratch,
    )
    for k in ("PYTHONPATH", "PYTHONPYCACHEPREFIX", "PYTHONWARNINGS", "TQDM_DISABLE"):
        env.pop(k, None)
    src = "/opt/vp/support/mpl"
    if os.path.isdir(src):
        shutil.copytree(src, env["MPLCONFIGDIR"], dirs_exist_ok=True)
    else:
        os.makedirs(env["MPLCONFIGDIR"], exist_ok=True)
    return env


def build_ext(scratch, env, extra=(), name="ext"):
    """Compile the C extension of the current tree; returns (path, error)."""
    q = subprocess.run(
        [PY, "-c", "import sysconfig, numpy; print(sysconfig.get_config_var('EXT_SUFFIX'));"
         "print(sysconfig.get_paths()['include']); print(numpy.get_include())"],
        env=env, capture_output=True, text=True, check=True).stdout.split("\n")
    out = os.path.join(scratch, name)
    os.makedirs(out, exist_ok=True)
    so = os.path.join(out, "statisticscalc" + q[0])
    src = os.path.join(REPO, "src/viqa/fr_metrics/stat_utils/statisticsmodule.c")
    p = subprocess.run(
        ["gcc", "-shared", "-fPIC", "-std=c11", *(extra or ["-O3"]), "-Wall",
         "-I" + q[1], "-I" + q[2], src, "-o", so, "-lm"],
        env=env, capture_output=True, text=True)
    return (so, None) if p.returncode == 0 else (None, p.stderr[-2000:])


def main():
    pid = sys.argv[1]
    if len(sys.argv) > 2 and sys.argv[2] in ("quick", "thorough"):
        tier = sys.argv[2]
    else:
        tier = os.environ.get("VERIF_TIER", "quick")
    replay = sys.argv[sys.argv.index("--replay") + 1] if "--replay" in sys.argv else None
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="viqa_verif_%s_" % pid)
    child = None

    def stop(*_):
        if child is not None:
            try:
                os.killpg(child.pid, signal.SIGKILL)
            except OSError:
                pass
        shutil.rmtree(scratch, ignore_errors=True)
        os._exit(3)

    signal.signal(signal.SIGTERM, stop)
    signal.signal(signal.SIGINT, stop)
    try:
        env = child_env(scratch)
        so, err = build_ext(scratch, env)
        res = None
        if so is None:
            res = dict(violations=[dict(key=None, msg="the C extension does not compile:\n" + err)])
        else:
            env["VERIF_EXT"] = so
            out = os.path.join(scratch, "result.json")
            cmd = [PY, os.path.join(VERIF, "vfw", "explore.py"), pid, tier, out]
            if replay:
                cmd += ["--replay", replay]
            log = open(os.path.join(scratch, "log"), "w+")
            child = subprocess.Popen(cmd, env=env, cwd=scratch, stdout=log,
                                     stderr=subprocess.STDOUT, start_new_session=True)
            child.wait()
            log.seek(0)
            text = log.read()
            if os.path.exists(out):
                with open(out) as f:
                    res = json.load(f)
            else:
                res = dict(violations=[dict(
                    key=None, msg="the explorer ended with %s before reporting:\n%s"
                    % (child.returncode, text[-3000:]))])
            if replay or os.environ.get("VERIF_VERBOSE"):
                sys.stderr.write(text)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

    with open(os.path.join(VERIF, "known_findings.json")) as f:
        known = [k for k in json.load(f)["known"] if k["property"] == pid]
    violations, printed = [], []
    for v in res["violations"]:
        for k in known:
            if v["key"] is not None and k["key"] == v["key"]:
                line = "KNOWN-FINDING: property=%s %s" % (pid, k["what"])
                if line not in printed:
                    printed.append(line)
                    print(line)
                break
        else:
            violations.append(v)
    wall = time.time() - t0
    if not replay:
        cov = res.get("coverage") or dict(states=0, transitions=0,
                                          traces_validated_against_impl=0, samples=[])
        ev = dict(property=pid, tier=tier, seed=seed, level="model_checking",
                  coverage=cov, assumptions=res.get("assumptions", []),
                  wall_s=round(wall, 2), violations=len(violations))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
    if violations:
        rp = os.path.join(VERIF, "replays")
        os.makedirs(rp, exist_ok=True)
        path = replay or os.path.join(rp, "%s.json" % pid)
        if not replay:
            with open(path, "w") as f:
                json.dump(dict(property=pid, tier=tier, key=violations[0]["key"],
                               message=violations[0]["msg"],
                               others=[v["key"] for v in violations[1:]]), f, indent=1, default=str)
        for v in violations[:3]:
            print("case %s\n%s" % (json.dumps(v["key"], default=str), v["msg"]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        sys.exit(1)
    cov = res.get("coverage", {})
    print("%s %s: held on %s traces, %s transitions, %s states (%.1f s)%s" % (
        pid, tier, cov.get("traces_validated_against_impl"), cov.get("transitions"),
        cov.get("states"), wall, "" if cov.get("exhaustive", True) else " [time limit reached]"))
    sys.exit(0)


if __name__ == "__main__":
    main()
