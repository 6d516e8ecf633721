#!/usr/bin/env python3
"""Writes /verif/known-findings.txt: what was repaired in /repo, and what is recorded instead."""
import json, os, subprocess
MAP = """5f3754e L01|1f7b29f L02|8e27fad L02|3e2ab27 L04|963fda3 L04|a219267 L04|13fed31 L04|75d5ac3 L06|f437b8c L10|f43c10a L10|9e8293b L05|de6a758 L05|c938970 L10|86a6e40 L03|e4310d6 P01|ec8027c P01|72cfa75 P01|763a304 P01|2daf915 P01|063db14 P01|f06689a P01|555c4fe P01|dde36f1 P04|b90a27a P12|16f8c15 P10|7223fd1 P10|6d6c7c8 P10|2058cb0 P11|aa0dede P11|cb71414 P11|1e835c4 P11|eac2ae1 P07|3ef7159 P05|7d52b61 P05|27c3a2f P09|53abbe5 P09|ce5b3c8 P07|f0faced P06|8e8f299 P07|0f5492e P07|b14f963 P07|2536a31 P08|b378e06 P04|1226eaf P07|7633026 P06|10e96af P09|bb3580c P05|a9455fd P12|1da35dd P08|a3a8db3 P12|e4cd521 P12|fbe6b39 P11|7fdb855 L04|84e309a P01|b245cd7 P06|ed8aac7 P07|de45deb P06|29c97fc P11|377f658 P06"""
log = dict(l.split(" ", 1) for l in subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h %s"], text=True).splitlines())
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "known-findings.txt"), "w") as f:
    for x in MAP.split("|"):
        c, p = x.split()
        assert log[c].startswith("fix: "), c
        f.write("fixed: property=%s %s %s\n" % (p, c, log[c][5:]))
    # the repair would be to parse decimal literals with correct rounding, but an existing test pins rounded-off values (`.14e2` is 14.000000000000002)
    for text, what in (("1" * 320 + "e-100;", "literal whose digits alone exceed the range of a double: read as infinity, not 1.1e219"),
                       ("0." + "0" * 330 + "1e100;", "literal whose digits alone fall below the range of a double: read as 0, not 1e-231")):
        f.write("known: property=L04 input=%s %s\n" % (json.dumps(text), what))
n = [c for c in log if log[c].startswith("fix: ") and c not in MAP]
assert not n, n
