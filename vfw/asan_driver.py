"""Runs the sanitised C extension over every geometry (started with libasan preloaded).

argv: extension, max extent, part, parts.  Prints the number of calls; the sanitizer ends the process on
the first access outside an array.
"""
import importlib.machinery
import importlib.util
import sys

import numpy as np

so, top, part, parts = sys.argv[1], *map(int, sys.argv[2:5])
ld = importlib.machinery.ExtensionFileLoader("statisticscalc", so)
mod = importlib.util.module_from_spec(importlib.util.spec_from_loader("statisticscalc", ld))
ld.exec_module(mod)
calls = k = 0
for m in range(1, top + 1):
    for n in range(1, top + 1):
        k += 1
        if k % parts != part:
            continue
        for bs in range(2, top + 2):
            for st in range(1, bs + 1):
                base = np.arange(m * n, dtype="f8").reshape(m, n) * 7 % 5
                wide = np.zeros((2 * m, 3 * n))
                wide[::2, ::3] = base
                for a in (base, np.asfortranarray(base), wide[::2, ::3], base.astype("u1"), base.astype("f4")):
                    sys.stdout.write("")
                    mod.minstd(a, bs, st)
                    mod.getstatistics(a, bs, st)
                    calls += 2
print("calls", calls)
