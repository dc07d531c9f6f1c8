"""Writes known_findings.json: no open findings; one entry per repair committed in /repo."""
import json
import os
import subprocess

M = """1df4c51 C02|9618a4e C28|dd4304b C03|9bab7b6 C03|366ff76 C04|ceaea2f C01|955f9cf C01|c27df7a C11|244cac8 C09 C10|ca107c6 C09|77c1597 C09|b53edd1 C15 C08 C09|ff2429b C08 C09 C05|98c3e87 C10|defa9bf C10|616d025 C12|440d1ae C12 C13|43f8002 C02|255250b C07|7f563a9 C16|9566925 C25|7f00915 C14|96123e8 C17|c7505f9 C17|23d234d C17|c8704e0 C25 C13|db05075 C20|52b08b3 C18|dd957ed C22|29d3309 C24|4a74f89 C22 C24|d1b4ad4 C22|755b8c2 C24|afcc7ee C24|b6a2263 C23|dbd6f68 C23|8a61dfc C23|606fc17 C06|7d44e01 C06|3cc171f C08 C09|1e20040 C03|a1d1f8a C07|8499629 C08 C09|fc767b1 C17|a5a2642 C18|a5265ba C18|0486176 C20|b000fed C20 C25|fb9246e C21|c07c19a C22|c652911 C22|59dd255 C22|375d4b4 C22|634796f C22|55ed1f5 C22 C24|411ae64 C24|da6ffc6 C24|a41c9a9 C24|5c7aeb2 C24|83a0ff0 C23|0d446a0 C25|ede2c7e C26|10453e4 C06|3ccf78c C22|a0b1675 C05|34d8b26 C03|340a01c C01|33d76ec C05|8fffdc6 C27|d87a9aa C11 C27|42a781e C22"""
log = dict(l.split(" ", 1) for l in subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True, check=True).stdout.splitlines())
fixed, used = [], set()
for e in M.split("|"):
    h, *props = e.split()
    what = log[h].removeprefix("fix: ")
    used.add(h)
    fixed += ["fixed: property=%s %s %s" % (p, h, what) for p in props]
rest = [h for h, s in log.items() if s.startswith("fix:") and h not in used]
assert not rest, rest
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
json.dump({"known": [], "fixed": fixed}, open(p, "w"), indent=1)
open(p, "a").write("\n")
print(len(fixed))
