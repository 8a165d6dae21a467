#!/usr/bin/env python3
"""run.py UNIT[+VARIANT] [verus args]: generates and verifies one unit, printing the diagnostics (development aid)."""
import os, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import gen
u = sys.argv[1]
u, _, variant = u.partition("+")
g = gen.Gen(os.environ.get("VERIF_REPO", "/repo"), os.path.join(HERE, "spec", u + ".vs"), variant=variant or None)
t = g.run()
p = "/tmp/v/gen_%s.rs" % u
open(p, "w").write(t)
for k, i in g.info.items():
    if i["lost"]: print("LOST", k, i["lost"])
for l in g.lost_items: print("LOST ITEM", l)
if "-u" in sys.argv:
    sys.argv.remove("-u")
    for k, i in g.info.items():
        if i["unlisted"]: print("UNLISTED", k)
    print("DROPPED", g.dropped)
r = subprocess.run(["verus", p, "--multiple-errors", "3", "--triggers-mode", "silent", "--num-threads", "8", "-A", "warnings"] + sys.argv[2:], cwd="/tmp/v")
